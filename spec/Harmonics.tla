------------------------------- MODULE Harmonics -------------------------------
(* Oscillators made of sine waves (property C15): at frequencies that divide *)
(* the sample rate by 8 and by 12 the sines take the values 0, 1/2, 1 and    *)
(* the halves of the roots of 2 and 3. A value is a triple of integers: the  *)
(* halves of 1, of the root of 2 and of the root of 3. Levels are in quarters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Levels, MaxHarmonics, Divisors, SimDepth
VARIABLES harmonics, divisor, hist
vars == <<harmonics, divisor, hist>>

Sine8 == <<<<0, 0, 0>>, <<0, 1, 0>>, <<2, 0, 0>>, <<0, 1, 0>>>>
Sine12 == <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, 1>>, <<2, 0, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Plus(v, w) == <<v[1] + w[1], v[2] + w[2], v[3] + w[3]>>
\* sin(2 pi k / d)
Sine(k, d) == LET half == d \div 2
                  table == IF d = 8 THEN Sine8 ELSE Sine12
                  v == table[(k % half) + 1]
              IN IF (k % d) < half THEN v ELSE Scale(-1, v)
RECURSIVE Sum(_, _, _)
Sum(h, k, d) == IF h > Len(harmonics) THEN <<0, 0, 0>> ELSE Plus(Scale(harmonics[h], Sine(h * k, d)), Sum(h + 1, k, d))
Init == harmonics = <<>> /\ divisor \in Divisors /\ hist = <<>>
Add(l) == /\ hist = <<>> /\ Len(harmonics) < MaxHarmonics /\ harmonics' = Append(harmonics, l) /\ UNCHANGED <<divisor, hist>>
Play == /\ hist = <<>>
        /\ hist' = <<[op |-> <<"play", divisor, harmonics>>, want |-> [k \in 1..(2 * divisor) |-> Sum(1, k, divisor)]]>>
        /\ UNCHANGED <<harmonics, divisor>>
Next == Play \/ \E l \in Levels : Add(l)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Every sum of harmonics is an odd, periodic function
Odd == \A k \in 0..divisor : Sum(1, divisor - k, divisor) = Scale(-1, Sum(1, k, divisor))
View == vars
Emit == hist' # <<>> => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == hist' # <<>> => PrintT(<<"TRACE", ToJson(hist')>>)
=============================================================================
