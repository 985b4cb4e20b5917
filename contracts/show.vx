[dir ethabi/src]
[type Token]
[verbatim]
text:
  pub struct Writer;
  /*@code*/
  broadcast use {group_text, group_tv, group_show};

[fn <Token as Display>::fmt]
spec:
  ensures __r is Ok ==> final(#1)@ == old(#1)@ + self.disp(),
entry:
  lemma_shown(tv(*self));
  reveal_strlit(",");
  assert(forall|x: Seq<char>| #[trigger] x.push(',') =~= x + ","@);
inv:
  {$vec: Vec<String>} $vec@.len() == $i
  {$vec: Vec<String>} strs($vec@) == showns(tvs($src@)).take($i as int)
  {$vec: =String} $vec@ == joined(showns(tvs($src@)).take($i as int), ","@)
  #1@ == #e(#1)@ + joined(showns(tvs($src@)).take($i as int), ","@)
step:
  lemma_joined_step(showns(tvs($src@)), ","@, $i as int);
