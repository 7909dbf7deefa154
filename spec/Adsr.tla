--------------------------------- MODULE Adsr ---------------------------------
(* The ADSR envelope (property C10). The shape of the curve is left open;    *)
(* what is specified is where each phase begins and ends, how long it takes  *)
(* (to within a frame), that it rises or falls strictly and that it does not *)
(* jump. Levels are 0..Unity, times are in frames.                           *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Unity,
          Tol      \* differences up to this are not told apart
VARIABLES phase,  \* "idle", "attack", "decay", "sustain", "release"
          level,  \* the gain of the last frame
          from,   \* the level the phase began at
          age,    \* the frames of the phase so far
          par     \* [a, d, s, r]
state == <<phase, level, from, age, par>>

Idle0 == phase = "idle" /\ level = 0 /\ from = 0 /\ age = 0

\* No jump: a curve that takes n frames moves by a limited amount in one
Smooth(g, n) == (IF g > level THEN g - level ELSE level - g) <= (4 * Unity) \div n + 2
Near(g, x) == g - x <= Tol /\ x - g <= Tol

\* Events are handled before the frame: q = [phase, from, age]
On(q) == [phase |-> "attack", from |-> level, age |-> 0]
Off(q) == IF q.phase \in {"idle", "release"} THEN q ELSE [phase |-> "release", from |-> level, age |-> 0]
RECURSIVE Handle(_, _)
Handle(q, es) == IF es = <<>> THEN q ELSE Handle(IF Head(es) = "on" THEN On(q) ELSE Off(q), Tail(es))

\* The frame after the events, with gain g
Enter(p, g) == phase' = p /\ from' = g /\ age' = 0
Stay(q) == phase' = q.phase /\ from' = q.from /\ age' = q.age + 1

\* A phase whose end is nearer than Tol may be over, or end in the next frame
AttackFrame(q, g) ==
    /\ q.phase = "attack"
    /\ IF par.a = 0 THEN g = Unity ELSE (g > level \/ Near(g, Unity)) /\ Smooth(g, par.a)
    /\ \/ /\ Near(g, Unity)
          /\ q.from = 0 => q.age + 1 >= par.a - 1
          /\ Enter("decay", g)
       \/ g <= Unity /\ par.a > 0 /\ q.age + 1 <= par.a /\ Stay(q)
DecayFrame(q, g) ==
    /\ q.phase = "decay"
    /\ IF par.d = 0 \/ Near(par.s, Unity) THEN Near(g, par.s)
       ELSE (g < level \/ Near(g, par.s)) /\ g >= par.s - Tol /\ Smooth(g, par.d)
    /\ \/ /\ Near(g, par.s)
          /\ ~Near(par.s, Unity) => q.age + 1 >= par.d - 1
          /\ Enter("sustain", g)
       \/ ~Near(g, par.s) /\ q.age + 1 <= par.d /\ Stay(q)
SustainFrame(q, g) == q.phase = "sustain" /\ Near(g, par.s) /\ Stay([q EXCEPT !.age = 0])
ReleaseFrame(q, g) ==
    /\ q.phase = "release"
    /\ IF par.r = 0 THEN g = 0 ELSE (g < level \/ Near(g, 0)) /\ Smooth(g, par.r)
    /\ \/ /\ g = 0
          /\ (Near(q.from, par.s) /\ q.from > Tol) => q.age + 1 >= par.r - 1
          /\ Enter("idle", 0)
       \/ par.r > 0 /\ g >= 0 /\ q.age + 1 <= par.r /\ Stay(q)
IdleFrame(q, g) == q.phase = "idle" /\ g = 0 /\ Enter("idle", 0)

Frame(es, g) ==
    LET q == Handle([phase |-> phase, from |-> from, age |-> age], es) IN
    /\ \/ AttackFrame(q, g) \/ DecayFrame(q, g) \/ SustainFrame(q, g) \/ ReleaseFrame(q, g) \/ IdleFrame(q, g)
    /\ level' = g
    /\ UNCHANGED par

----------------------------------------------------------------------------
\* The specification on its own: every choice of times, events and gains
CONSTANTS Times, Sustains
Init == Idle0 /\ par \in [a : Times, d : Times, s : Sustains, r : Times]
EventSets == {<<>>, <<"on">>, <<"off">>, <<"on", "off">>, <<"off", "on">>, <<"on", "on">>}
Next == \E es \in EventSets, g \in 0..Unity : Frame(es, g)
Spec == Init /\ [][Next]_state

InRange == level >= 0 /\ level <= Unity
\* Every phase but the sustained one is over in its time
OnTime == /\ phase = "attack" => age <= par.a
          /\ phase = "decay" => age <= par.d
          /\ phase = "release" => age <= par.r
Silent == phase = "idle" => level = 0
UnityFirst == phase = "decay" => from >= Unity - Tol
Holds == phase = "sustain" => Near(level, par.s)
\* Without events something can always happen, and only in one way at rest
CanGoOn == ENABLED (\E g \in 0..Unity : Frame(<<>>, g))
=============================================================================
