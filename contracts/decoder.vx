[type Token]
[type ParamType]
[type DecodeResult]
[verbatim]
text:
  /*@code*/
  broadcast use {group_tv, group_dec, group_sub};

[fn as_usize]
spec:
  ensures match wnum(#1@) { Some(n) => __r is Ok && __r->Ok_0 == n, None => __r is Err },
inv:
  $bool == forall|k: int| 0 <= k < $i ==> #1@[k] == 0
  $bool == exists|k: int| 0 <= k < $i && #1@[k] != 0
  forall|k: int| 0 <= k < $i ==> #1@[k] == 0
  $int == be_part(#1@, 28, $i as int)
entry:
  lemma_shifts();
step:
  lemma_be_part(#1@, 28, $i as int);

[fn as_bool]
spec:
  ensures match wbool(#1@) { Some(n) => __r is Ok && __r->Ok_0 == n, None => __r is Err },
inv:
  $bool == forall|k: int| 0 <= k < $i ==> #1@[k] == 0
  $bool == exists|k: int| 0 <= k < $i && #1@[k] != 0
  forall|k: int| 0 <= k < $i ==> #1@[k] == 0

[fn decode]
spec:
  requires #2@.len() <= isize::MAX,
  ensures match dec_list(#1@, #2@) { Some(vs) => __r is Ok && tvs(__r->Ok_0@) == vs, None => __r is Err },
inv:
  $bool == forall|k: int| 0 <= k < $i ==> empty_ok(#[trigger] #1@[k])
  $bool == exists|k: int| 0 <= k < $i && !empty_ok(#[trigger] #1@[k])
  $int <= #2@.len() + 32
  each(#1@, #2@, 0, $i as int) == Some(Decs { vs: tvs($vec@), o: $int as int })
step:
  step_each(#1@, #2@, 0, $i as int);

[fn peek]
spec:
  requires #2 + #3 <= usize::MAX,
  ensures match rdb(#1@, #2 as int, #3 as int) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },

[fn peek_32_bytes]
spec:
  requires #2 + 32 <= usize::MAX,
  ensures match rdw(#1@, #2 as int) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },

[fn take_bytes]
spec:
  requires #1@.len() <= isize::MAX,
  ensures match rdb(#1@, #2 as int, #3 as int) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },

[fn decode_param]
spec:
  requires #2@.len() <= isize::MAX, #3 <= #2@.len() + 32,
  ensures
    match dec(*#1, #2@, #3 as int) { Some(x) => __r is Ok && tv(__r->Ok_0.token) == x.v && __r->Ok_0.new_offset == x.o && x.o <= #2@.len() + 32, None => __r is Err },
  decreases #1,
entry:
  lemma_dynt_ex(*#1);
  lemma_dec(*#1, #2@, #3 as int);
inv:
  $int <= @@decode_param.1@.len() + 32
  rep(@@decode_param.0.pt(), @@decode_param.1@, 0, $i as int) == Some(Decs { vs: tvs($vec@), o: $int as int })
  rep(@@decode_param.0.pt(), @@decode_param.1@, if dynt(*#1) { 0 } else { #3 as int }, $i as int) == Some(Decs { vs: tvs($vec@), o: $int as int })
  each($src@, @@decode_param.1@, if dynt(*#1) { 0 } else { #3 as int }, $i as int) == Some(Decs { vs: tvs($vec@), o: $int as int })
step:
  step_rep(@@decode_param.0.pt(), @@decode_param.1@, 0, $i as int, $n as int);
  step_rep(@@decode_param.0.pt(), @@decode_param.1@, if dynt(*#1) { 0 } else { #3 as int }, $i as int, $n as int);
  step_each($src@, @@decode_param.1@, if dynt(*#1) { 0 } else { #3 as int }, $i as int);

[fn ParamType::is_empty_bytes_valid_encoding]
spec:
  ensures __r == empty_ok(*self),

[fn ParamType::is_dynamic]
spec:
  ensures __r == dynt(*self),
  decreases self,
entry:
  lemma_dynt_ex(*self);
inv:
  $bool == exists|k: int| 0 <= k < $i && dynt(#[trigger] $src@[k])
