---------------------------- MODULE TracePython ----------------------------
(***************************************************************************)
(* Conformance of recorded calls of the Python functions.  A Python call   *)
(* decodes into an image of its own, of exactly width*height entries, and  *)
(* gives it back as bytes, blue, green, red, alpha of each pixel; errors   *)
(* of the decoder are ValueErrors with its text.  An image no memory can   *)
(* hold, and arguments of a wrong kind, raise some exception.              *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
Chunk == DivUp(Len(Trace), Lanes)
VARIABLES l, lane
Init == lane \in 0..(Lanes - 1) /\ l = lane * Chunk + 1 /\ l <= Len(Trace)
Next == l < Min2(Len(Trace), (lane + 1) * Chunk) /\ l' = l + 1 /\ UNCHANGED lane
Spec == Init /\ [][Next]_<<l, lane>>
t == Trace[l]

WrongKind == t.f \notin SmallFormats \cup AstcFns \cup {"astc", "pvrtc_2bpp", "pvrtc_4bpp"}
TooLarge == Less2(1048576, t.w, t.h)
\* bytes of pixel v: blue, green, red, alpha
PixelBytes(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
Returned(px) == /\ Len(t.p) = 4 * Len(px)
                /\ \A i \in 1..Len(px) : \A j \in 1..4 : t.p[4 * (i - 1) + j] = PixelBytes(px[i])[j]
Conforms ==
  /\ t.u = 1
  /\ IF WrongKind THEN t.r \in {"err", "exc"}
     ELSE IF TooLarge THEN t.r \in {"err", "exc"}
     ELSE LET x == Expected(t)
          IN IF x.r = "err" THEN t.r = "err" /\ t.e = x.e
             ELSE t.r = "ok" /\ t.s = 1 /\ Returned(x.p)
=============================================================================
