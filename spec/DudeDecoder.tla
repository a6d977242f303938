------------------------------ MODULE DudeDecoder ------------------------------
(* The classifying DUDE decoder: per label and per model bit, an online       *)
(* denoiser over the bit's history; its posterior, scaled by confidence in    *)
(* the number of buffers of that label, is added to the channel.               *)
EXTENDS ClassifyDecoder, Dude
\* per label: [size, o |-> one online denoiser per model bit]
NewDudes(c) == [size |-> 0, o |-> [i \in 1..c.m |-> NewOnline]]
FeedAll(c, h, d, hb) == [size |-> d.size + 1, o |-> [i \in 1..c.m |-> Feed(h, c.ctx, d.o[i], hb[i])]]
LN1 == 36044                       \* ln of a certain bit, 1e-3
LnRatio(a, b) == IF b = 0 THEN LN1 ELSE IF a = 0 THEN -LN1 ELSE Tab.lnint[a] - Tab.lnint[b]
BitLlr(c, h, o, y) == IF Warming(c.ctx, o) THEN (IF y = 0 THEN LN1 ELSE -LN1)
                      ELSE LET w == SmoothPost(h, Basis(h, o, y), y) IN LnRatio(w[1], w[2])
Denoised(c, h, d, llr) ==
  LET n == Len(llr)  cf == Confidence(d.size + 1, c.cc, c.s20)  cl == (c.clip8 * MaxAbs(llr) * 125) \div 8
      hb == HardOf(llr, c.m) IN
  [i \in 1..n |-> Clip(llr[i] * 125 + (IF i <= c.m THEN (cf * BitLlr(c, h, d.o[i], hb[i])) \div 10000 ELSE 0), -cl, cl)]
=============================================================================
