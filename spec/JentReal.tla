------------------------------ MODULE JentReal ------------------------------
(***************************************************************************)
(* The documented constants of the library.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, U64

At(tab, osr) == tab[IF osr > Len(tab) THEN Len(tab) ELSE osr]
CeilDiv(a, b) == (a + b - 1) \div b

R_RctCut(osr, ntg) == IF ntg THEN CeilDiv(30 * osr, 8) ELSE 30 * osr
R_RctCutP(osr, ntg) == IF ntg THEN CeilDiv(60 * osr, 8) ELSE 60 * osr

R_AptTab == << 325, 422, 459, 477, 488, 494, 499, 502, 505, 507,
               508, 509, 510, 511, 512, 512, 512, 512, 512, 512 >>
R_AptTabP == << 355, 447, 479, 494, 502, 507, 510, 512, 512, 512,
                512, 512, 512, 512, 512, 512, 512, 512, 512, 512 >>
R_AptTabN == << 17, 71, 136, 191, 236, 272, 301, 325, 345, 361,
                375, 388, 398, 407, 415, 422, 429, 434, 439, 444 >>
R_AptTabNP == << 26, 92, 162, 221, 267, 303, 332, 355, 375, 390,
                 404, 415, 425, 433, 440, 447, 453, 458, 462, 466 >>
R_AptCut(osr, ntg) == At(IF ntg THEN R_AptTabN ELSE R_AptTab, osr)
R_AptCutP(osr, ntg) == At(IF ntg THEN R_AptTabNP ELSE R_AptTabP, osr)

R_LagGlob(osr) == At(<< 66443, 93504, 104761, 110875, 114707, 117330, 119237, 120686, 121823,
   122739, 123493, 124124, 124660, 125120, 125520, 125871, 126181, 126457, 126704, 126926 >>, osr)
R_LagGlobP(osr) == At(<< 66876, 93896, 105108, 111188, 114993, 117596, 119486, 120920, 122045,
   122951, 123696, 124318, 124847, 125301, 125695, 126041, 126346, 126617, 126860, 127079 >>, osr)
R_LagLoc(osr) == At(<< 38, 75, 111, 146, 181, 215, 250, 284, 318, 351,
   385, 419, 452, 485, 518, 551, 584, 617, 650, 683 >>, osr)
R_LagLocP(osr) == At(<< 60, 119, 177, 234, 291, 347, 404, 460, 516, 571,
   627, 683, 738, 793, 848, 903, 958, 1013, 1068, 1123 >>, osr)

R_RmCut(osr, ntg) == IF ntg
  THEN At(<< 4, 46, 134, 255, 399, 560, 733, 856, 963, 1070,
             1177, 1284, 1391, 1498, 1605, 1712, 1819, 1926, 2033, 2140 >>, osr)
  ELSE 107 * (IF osr > 20 THEN 20 ELSE osr)
R_RmCutP(osr, ntg) == IF ntg
  THEN At(<< 5, 50, 142, 265, 410, 572, 746, 857, 964, 1071,
             1178, 1285, 1392, 1499, 1606, 1713, 1820, 1927, 2034, 2141 >>, osr)
  ELSE 107 * (IF osr > 20 THEN 20 ELSE osr) + 1

R_GcdTooBig(g) == ~Lt64(g, <<65535, 32767, 0, 0>>)          \* >= UINT32_MAX / 2
R_VarTooSmall(sum, osr) == Lt64(MulSmall(sum, osr), FromInt(1024))
=============================================================================
