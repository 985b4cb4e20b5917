[type ParamType]
[verbatim]
text:
  pub struct Reader;
  /*@code*/
  broadcast use {group_ty, group_bpos, group_rd};

[fn Reader::read]
spec:
  ensures match rd(#1@) { Some(t) => __r is Ok && ty(__r->Ok_0) == t, None => __r is Err },
  decreases #1@.len(),
entry:
  lemma_rd(#1@);
  lemma_ends(#1@);
  lemma_open(#1@);
pre:
  lemma_ends($src.cs());
inv:
  $int == depth($src.cs(), $i as int)
  $int <= $i
  $int == bpos($src.cs(), start($src.cs(), $i as int))
  parts($src.cs(), $i as int) == Some(tys($vec@))
  forall|k: int| 0 <= k <= $i ==> #[trigger] depth($src.cs(), k) >= 0
  0 <= start($src.cs(), $i as int) <= $i
step:
  lemma_char($src.cs(), $i as int);
  lemma_members($src.cs());
post:
  lemma_members($src.cs());
