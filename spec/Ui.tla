--------------------------------- MODULE Ui ---------------------------------
(* A tool with its display: the main thread, which runs one part of the work after the other
   and asks for the lines of each, the event loop of the display with its bounded queue, the
   ticker, and keys.  What the main thread asks for (and the end) is queued by short-lived
   threads; the ticker waits for room in the queue; keys are lost when there is none.
   (A part of the work is taken to last until what it asked for is in the queue: Go starts
   these threads in no order.)

   Policy: "right", or a wrong design:
     quitfirst  the loop is told to end before the ticker has
     nowait     the main thread does not wait for the loop to end
     keep       the lines of the previous part stay
     drop       what the main thread asks for is lost when the queue is full
     deaf       Ctrl-C is taken, but not passed on
     anykey     any key ends the run *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Parts, Cap, Keys, MaxKeys, Policy

VARIABLES main, at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out
vars == <<main, at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>

Init == /\ main = "new" /\ at = 0 /\ shutdown = FALSE /\ tick = "off"
        /\ queue = <<>> /\ posts = {} /\ app = "init"
        /\ shown = {} /\ drawn = <<>> /\ alt = FALSE /\ cancelled = FALSE
        /\ pressed = 0 /\ hold = 0 /\ part = {} /\ out = "none"

\* ---------------------------------------------------------------- main thread
Ready == /\ main = "new" /\ app = "loop" /\ main' = "next" /\ tick' = "idle"
         /\ UNCHANGED <<at, shutdown, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
Begin == /\ main = "next" /\ at < Parts /\ at' = at + 1 /\ main' = "work"
         /\ IF Policy = "drop" THEN /\ queue' = IF Len(queue) < Cap THEN Append(queue, <<"show", at + 1>>) ELSE queue
                                    /\ posts' = posts
            ELSE posts' = posts \cup {<<"show", at + 1>>} /\ queue' = queue
         /\ UNCHANGED <<shutdown, tick, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
\* the work may stand still for as long as it likes
Stand == /\ main = "work" /\ hold = 0 /\ at \notin part /\ hold' = at
         /\ UNCHANGED <<main, at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, part, out>>
Go == /\ hold # 0 /\ hold' = 0 /\ part' = part \cup {at}
      /\ UNCHANGED <<main, at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, out>>
\* a part which is cancelled ends early; the others are done in full
Finish == /\ main = "work" /\ hold = 0 /\ (Policy = "drop" \/ <<"show", at>> \notin posts)
          /\ main' = "next" /\ part' = part \cup {at}
          /\ out' \in IF cancelled THEN {"part"} \cup ({out} \ {"none"}) ELSE {IF out = "none" THEN "full" ELSE out}
          /\ UNCHANGED <<at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold>>
Stop1 == /\ main = "next" /\ at = Parts
         /\ IF Policy = "quitfirst" THEN posts' = posts \cup {<<"quit">>} /\ shutdown' = shutdown
            ELSE shutdown' = TRUE /\ posts' = posts
         /\ main' = "stop1"
         /\ UNCHANGED <<at, tick, queue, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
Stop2 == /\ main = "stop1" /\ main' = "stop2"
         /\ IF Policy = "quitfirst" THEN app = "end" /\ shutdown' = TRUE /\ posts' = posts
            ELSE tick = "done" /\ posts' = posts \cup {<<"quit">>} /\ shutdown' = shutdown
         /\ UNCHANGED <<at, tick, queue, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
Stop3 == /\ main = "stop2"
         /\ (Policy = "quitfirst" => tick = "done") /\ (Policy \notin {"quitfirst", "nowait"} => app = "end")
         /\ main' = "report"
         /\ UNCHANGED <<at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
Exit == /\ main = "report" /\ main' = "end"
        /\ UNCHANGED <<at, shutdown, tick, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>

\* --------------------------------------------------------------------- ticker
Tick == /\ tick = "idle" /\ tick' = "post"
        /\ UNCHANGED <<main, at, shutdown, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
TickPost == /\ tick = "post" /\ Len(queue) < Cap /\ queue' = Append(queue, <<"tick">>) /\ tick' = "idle"
            /\ UNCHANGED <<main, at, shutdown, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
TickEnd == /\ tick = "idle" /\ shutdown /\ tick' = "done"
           /\ UNCHANGED <<main, at, shutdown, queue, posts, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>

Post(p) == /\ p \in posts /\ Len(queue) < Cap /\ queue' = Append(queue, p) /\ posts' = posts \ {p}
           /\ UNCHANGED <<main, at, shutdown, tick, app, shown, drawn, alt, cancelled, pressed, hold, part, out>>
Press == /\ app = "loop" /\ pressed < MaxKeys /\ pressed' = pressed + 1
         /\ \E k \in Keys : queue' = IF Len(queue) < Cap THEN Append(queue, <<"key", k>>) ELSE queue
         /\ UNCHANGED <<main, at, shutdown, tick, posts, app, shown, drawn, alt, cancelled, hold, part, out>>

\* ----------------------------------------------------------------- event loop
AppInit == /\ app = "init" /\ app' = "loop" /\ alt' = TRUE
           /\ UNCHANGED <<main, at, shutdown, tick, queue, posts, shown, drawn, cancelled, pressed, hold, part, out>>
Loop == /\ app = "loop" /\ queue # <<>> /\ queue' = Tail(queue)
        /\ LET e == Head(queue) IN
           CASE e[1] = "tick" -> /\ drawn' = [p \in shown |-> <<p, at>>] /\ UNCHANGED <<app, shown, alt, cancelled, posts>>
             [] e[1] = "show" -> /\ shown' = (IF Policy = "keep" THEN shown ELSE {}) \cup {e[2]}
                                 /\ drawn' = <<>> /\ UNCHANGED <<app, alt, cancelled, posts>>
             [] e[1] = "quit" -> /\ app' = "end" /\ alt' = FALSE /\ UNCHANGED <<shown, drawn, cancelled, posts>>
             [] e[1] = "sync" -> UNCHANGED <<app, shown, drawn, alt, cancelled, posts>>
             [] e[1] = "key" /\ e[2] = "refresh" -> posts' = posts \cup {<<"sync">>} /\ UNCHANGED <<app, shown, drawn, alt, cancelled>>
             [] OTHER -> /\ cancelled' = (cancelled \/ (e[2] = "cancel" /\ Policy # "deaf") \/ Policy = "anykey")
                         /\ UNCHANGED <<app, shown, drawn, alt, posts>>
        /\ UNCHANGED <<main, at, shutdown, tick, pressed, hold, part, out>>

Next == Ready \/ Begin \/ Stand \/ Go \/ Finish \/ Stop1 \/ Stop2 \/ Stop3 \/ Exit \/ Tick \/ TickPost \/ TickEnd
        \/ (\E p \in posts : Post(p)) \/ Press \/ AppInit \/ Loop \/ (main = "end" /\ UNCHANGED vars)

Posts == {<<"show", i>> : i \in 1..Parts} \cup {<<"quit">>, <<"sync">>}
Fair == /\ WF_vars(Ready) /\ WF_vars(Begin) /\ WF_vars(Finish) /\ WF_vars(Stop1) /\ WF_vars(Stop2) /\ WF_vars(Stop3) /\ WF_vars(Exit)
        /\ WF_vars(Tick) /\ SF_vars(TickPost) /\ SF_vars(TickEnd) /\ WF_vars(AppInit) /\ WF_vars(Loop)
        /\ \A p \in Posts : SF_vars(Post(p))
Spec == Init /\ [][Next]_vars /\ Fair /\ WF_vars(Go)
Stuck == Init /\ [][Next]_vars /\ Fair

\* ----------------------------------------------------------------- properties
Restored == main \in {"report", "end"} => ~alt
Keyless == cancelled => "cancel" \in Keys /\ pressed > 0
Whole == main = "end" /\ ~cancelled => out = "full"
One == Cardinality(shown) <= 1
Ends == <>(main = "end")
\* (Stuck) where the work stands still, the display comes to show it as it stands
Still == [](hold # 0 => <>(hold = 0 \/ (shown = {at} /\ drawn = [p \in {at} |-> <<at, at>>])))
Heard == []((app = "loop" /\ queue # <<>> /\ Head(queue) = <<"key", "cancel">>) => <>cancelled)
\* keys change nothing but by cancelling
Same == [][cancelled' # cancelled => queue # <<>> /\ Head(queue) = <<"key", "cancel">>]_vars
=============================================================================
