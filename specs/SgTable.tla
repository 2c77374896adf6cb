------------------------------- MODULE SgTable -------------------------------
(* Written by tools/hall.py from the Hall symbols of the space groups: the   *)
(* generators of each group, <<W11, W12, .., W33, w1, w2, w3>>, w in 24ths.   *)
EXTENDS Integers
SgGen == <<
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 12, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 12, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 6, 6, 6>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 6, 6, 6>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 6>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 18>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 6>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 18>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 18>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 18>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 6>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 6>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 6>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 6>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 6>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 12, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 0, 6>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 12, 6>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 8>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 16>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 8>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 16>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 8>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 16>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 8>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 16>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 16, 8, 8>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 8, 16, 16>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, -1, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 4>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 20>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 8>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 16>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<-1, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 4>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 20>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 20>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 4>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 8>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 16>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 16>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 8>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<-1, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>>>,
  <<<<-1, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>, <<0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<1, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<0, -1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 6, 6, 6>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 12, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 6, 6, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 18, 6, 18>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 6, 18, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 6, 18, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, 1, 0, -1, 0, 0, 0, 0, -1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<0, 1, 0, -1, 0, 0, 0, 0, -1, 6, 18, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<0, -1, 0, 1, 0, 0, 0, 0, 1, 12, 12, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 12, 12, 12>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 12>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 6, 6, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 6, 6, 6>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 12, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 0, 12>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 6, 6, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 6, 6, 18>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>,
  <<<<1, 0, 0, 0, 1, 0, 0, 0, 1, 12, 12, 12>>, <<-1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1, 6, 18, 6>>, <<1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, 12>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0>>>>
>>
==============================================================================
