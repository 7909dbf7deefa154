------------------------------- MODULE Response -------------------------------
(* The response of biquad filters (property C19) at 0, at half the sample    *)
(* rate and at the centre frequency, at any frequency, Q and shelf gain,     *)
(* once settled, whatever went before and however it came to be set. Q is in tenths; a shelf is given by   *)
(* the root of its gain, in tenths.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Types, Freqs, Qs, Shelves, Outs, Ways, MaxSets, MaxTones, SimDepth
VARIABLES par, fresh, sets, tones, hist
vars == <<par, fresh, sets, tones, hist>>
\* As a fraction
Gain(type, at, q, s) ==
    CASE type = "lowpass" -> (CASE at = "zero" -> <<1, 1>> [] at = "half" -> <<0, 1>> [] at = "centre" -> <<q, 10>>)
      [] type = "highpass" -> (CASE at = "zero" -> <<0, 1>> [] at = "half" -> <<1, 1>> [] at = "centre" -> <<q, 10>>)
      [] type = "bandpass" -> (CASE at = "zero" -> <<0, 1>> [] at = "half" -> <<0, 1>> [] at = "centre" -> <<1, 1>>)
      [] type = "notch" -> (CASE at = "zero" -> <<1, 1>> [] at = "half" -> <<1, 1>> [] at = "centre" -> <<0, 1>>)
      [] type = "lowshelf" -> (CASE at = "zero" -> <<s * s, 100>> [] at = "half" -> <<1, 1>> [] at = "centre" -> <<s, 10>>)
      [] type = "highshelf" -> (CASE at = "zero" -> <<1, 1>> [] at = "half" -> <<s * s, 100>> [] at = "centre" -> <<s, 10>>)
Init == \E t \in Types : par = [type |-> t, f |-> 0, q |-> 7, s |-> 10, g |-> 4] /\ fresh = FALSE /\ sets = 0 /\ tones = 0 /\ hist = <<>>
\* At once, or by a ramp of a twentieth of a second or of seconds
Set(f, q, s, g, way) ==
    /\ ~fresh /\ fresh' = TRUE /\ sets < MaxSets /\ sets' = sets + 1
    /\ par' = [par EXCEPT !.f = f, !.q = q, !.s = s, !.g = g]
    /\ hist' = Append(hist, [op |-> <<"set", par.type, f, q, s, g, way>>, want |-> <<>>])
    /\ UNCHANGED tones
\* A tone on one channel while the other has another one
Tone(at, other) ==
    /\ sets > 0 /\ tones < MaxTones /\ tones' = tones + 1 /\ fresh' = FALSE
    /\ hist' = Append(hist, [op |-> <<"tone", at, other, par.f, par.q, par.s>>,
                             want |-> LET f(x) == LET v == Gain(par.type, x, par.q, par.s) IN <<par.g * v[1], 4 * v[2]>> IN <<f(at), f(other)>>])
    /\ UNCHANGED <<par, sets>>
Places == {"zero", "half", "centre"}
Next == \/ \E f \in Freqs, q \in Qs, s \in Shelves, g \in Outs, way \in Ways : Set(f, q, s, g, way)
        \/ \E at \in Places, other \in Places : Tone(at, other)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Filters of opposite types share the spectrum between them
Opposite == \A q \in Qs, s \in Shelves :
    /\ Gain("lowpass", "zero", q, s) = Gain("highpass", "half", q, s)
    /\ Gain("lowshelf", "zero", q, s) = Gain("highshelf", "half", q, s)
    /\ \A at \in Places : Gain("bandpass", at, q, s)[1] + Gain("notch", at, q, s)[1] = 1
View == <<par, fresh, sets, tones>>
Emit == hist'[Len(hist')].op[1] = "tone" => PrintT(<<"TRACE", ToJson(hist')>>)
EmitEnd == Len(hist') = SimDepth => PrintT(<<"TRACE", ToJson(hist')>>)
WaysA == {"now", "slide", "creep"}
TypesA == {"lowpass", "highpass", "bandpass", "notch", "lowshelf", "highshelf"}
=============================================================================
