[type Token]
[type ParamType]
[type Param]
[type StateMutability]
[type Function]
[type EventParam]
[type Event]
[type Constructor]
[verbatim]
text:
  /*@code*/
  broadcast use {group_sig};

[fn Function::encode_input]
spec:
  requires list_fits(tvs(#1@)),
  ensures
    oftypes(tvs(#1@), kinds(self.inputs@)) ==> __r is Ok && __r->Ok_0@ == sig_hash(self.name@, tys(kinds(self.inputs@))).take(4) + enc_list(tvs(#1@)),
    !oftypes(tvs(#1@), kinds(self.inputs@)) ==> __r is Err,
inv:
  {$vec: Vec<ParamType>} $vec@ == kinds($src@).take($i as int)
  {$vec: Vec<u8>} $vec@ == $src@.take($i as int)
  {$vec: Vec<u8>} $vec@ == sig_hash(self.name@, tys(kinds(self.inputs@))).take(4) + $src@.take($i as int)

[fn Function::decode_output]
spec:
  requires #1@.len() <= isize::MAX,
  ensures match dec_list(kinds(self.outputs@), #1@) { Some(vs) => __r is Ok && tvs(__r->Ok_0@) == vs, None => __r is Err },
inv:
  {$vec: Vec<ParamType>} $vec@ == kinds($src@).take($i as int)

[fn Function::decode_input]
spec:
  requires #1@.len() <= isize::MAX,
  ensures match dec_list(kinds(self.inputs@), #1@) { Some(vs) => __r is Ok && tvs(__r->Ok_0@) == vs, None => __r is Err },
inv:
  {$vec: Vec<ParamType>} $vec@ == kinds($src@).take($i as int)

[fn Constructor::encode_input]
spec:
  requires list_fits(tvs(#2@)),
  ensures
    oftypes(tvs(#2@), kinds(self.inputs@)) ==> __r is Ok && __r->Ok_0@ == #1@ + enc_list(tvs(#2@)),
    !oftypes(tvs(#2@), kinds(self.inputs@)) ==> __r is Err,
inv:
  {$vec: Vec<ParamType>} $vec@ == kinds($src@).take($i as int)
  {$vec: Vec<u8>} $vec@ == $src@.take($i as int)
  {$vec: Vec<u8>} $vec@ == #1@ + $src@.take($i as int)

