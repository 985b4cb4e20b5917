[type ParamType]
[type Param]
[type Function]
[type EventParam]
[type Event]
[type StateMutability]
[verbatim]
text:
  pub struct Writer;
  /*@code*/
  broadcast use {group_text, group_ty, group_names, group_sig};

[fn Writer::write_for_abi]
spec:
  ensures __r@ == tname(ty(*#1), #2),
  decreases #1, 0int,
entry:
  lemma_tname(ty(*#1), #2);
  reveal_strlit(",");
  assert(forall|x: Seq<char>| #[trigger] x.push(',') =~= x + ","@);
inv:
  {$vec: Vec<String>} $vec@.len() == $i
  {$vec: Vec<String>} strs($vec@) == tnames(tys($src@), #2).take($i as int)
  {$vec: =String} $vec@ == joined(tnames(tys($src@), #2).take($i as int), ","@)
step:
  lemma_joined_step(tnames(tys($src@), #2), ","@, $i as int);

[fn Writer::write]
spec:
  ensures __r@ == tname(ty(*#1), true),
  decreases #1, 1int,

[fn <ParamType as Display>::fmt]
spec:
  ensures __r is Ok ==> final(#1)@ == old(#1)@ + self.disp(),

[fn short_signature]
spec:
  ensures __r@ == sig_hash(#1@, tys(#2@)).take(4),
entry:
  reveal_strlit(",");
  assert(forall|x: Seq<char>| #[trigger] x.push(',') =~= x + ","@);
inv:
  {$vec: Vec<String>} $vec@.len() == $i
  {$vec: Vec<String>} strs($vec@) == tnames(tys($src@), true).take($i as int)
  {$vec: =String} $vec@ == joined(tnames(tys($src@), true).take($i as int), ","@)
step:
  lemma_joined_step(tnames(tys($src@), true), ","@, $i as int);

[fn long_signature]
spec:
  ensures __r.b@ == sig_hash(#1@, tys(#2@)),
entry:
  reveal_strlit(",");
  assert(forall|x: Seq<char>| #[trigger] x.push(',') =~= x + ","@);
inv:
  {$vec: Vec<String>} $vec@.len() == $i
  {$vec: Vec<String>} strs($vec@) == tnames(tys($src@), true).take($i as int)
  {$vec: =String} $vec@ == joined(tnames(tys($src@), true).take($i as int), ","@)
step:
  lemma_joined_step(tnames(tys($src@), true), ","@, $i as int);

[fn Function::signature]
spec:
  ensures __r@ == sig_text(self.name@, tys(kinds(self.inputs@))) + (if self.outputs@.len() == 0 { Seq::empty() } else { ":("@ + list_text(tys(kinds(self.outputs@))) + ")"@ }),
entry:
  reveal_strlit(":(");
  reveal_strlit(",");
  assert(forall|x: Seq<char>| #[trigger] x.push(',') =~= x + ","@);
  assert(forall|x: Seq<char>| #[trigger] (x + "):("@) =~= x + ")"@ + ":("@);
  assert(forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] (x + (y + z)) =~= x + y + z);
  assert(forall|x: Seq<char>| #[trigger] (x + Seq::<char>::empty()) =~= x);
inv:
  {$vec: Vec<String>} $vec@.len() == $i
  {$vec: Vec<String>} strs($vec@) == tnames(tys(kinds($src@)), true).take($i as int)
  {$vec: =String} $vec@ == joined(tnames(tys(kinds($src@)), true).take($i as int), ","@)
step:
  lemma_joined_step(tnames(tys(kinds($src@)), true), ","@, $i as int);

[fn Event::signature]
spec:
  ensures __r.b@ == sig_hash(self.name@, tys(ekinds(self.inputs@))),
inv:
  {$vec: Vec<ParamType>} $vec@ == ekinds($src@).take($i as int)
