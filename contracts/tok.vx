[type Token]
[type ParamType]
[verbatim]
text:
  pub struct StrictTokenizer;
  pub struct LenientTokenizer;
  /*@code*/
  broadcast use {group_ty, group_bpos, group_tv, lemma_suffix_1, lemma_full, lemma_u_of};

[fn %TOK%::tokenize]
spec:
  ensures match tok(%LEN%, ty(*#1), #2@) { Some(v) => __r is Ok && tv(__r->Ok_0) == v, None => __r is Err },
  decreases ty(*#1), 2int,
entry:
  lemma_tok(%LEN%, ty(*#1), #2@);
  if ty(*#1) is FArr { lemma_items_arr(%LEN%, *ty(*#1)->FArr_0, ty(*#1)->FArr_1, #2@); }
  if ty(*#1) is Arr { assert(decreases_to!(ty(*#1) => *ty(*#1)->Arr_0)); }
  if ty(*#1) is FArr { assert(decreases_to!(ty(*#1) => *ty(*#1)->FArr_0)); }
  reveal(bool_of);
  reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("true"); reveal_strlit("false");

[fn %TOK%::tokenize_array]
spec:
  ensures match titems(%LEN%, TY::Arr(Box::new(ty(*#2))), #1@) { Some(vs) => __r is Ok && tvs(__r->Ok_0@) == vs, None => __r is Err },
  decreases ty(*#2), 3int,
entry:
  lemma_items(%LEN%, TY::Arr(Box::new(ty(*#2))), #1@);
  lemma_ends(#1@);
inv:
  #1@ == $src.cs()
  $int == level(TY::Arr(Box::new(ty(*#2))), #1@, $i as int)
  -$i <= $int <= $i
  $bool == quoted(#1@, $i as int)
  $int == bpos(#1@, begin(TY::Arr(Box::new(ty(*#2))), #1@, $i as int))
  1 <= begin(TY::Arr(Box::new(ty(*#2))), #1@, $i as int)
  $i > 0 ==> begin(TY::Arr(Box::new(ty(*#2))), #1@, $i as int) <= $i
  scan(%LEN%, TY::Arr(Box::new(ty(*#2))), #1@, $i as int) == Some(tvs($vec@))
step:
  lemma_tok_char(%LEN%, TY::Arr(Box::new(ty(*#2))), #1@, $i as int);

[fn %TOK%::tokenize_struct]
spec:
  ensures match titems(%LEN%, TY::Tup(tys(#2@)), #1@) { Some(vs) => __r is Ok && tvs(__r->Ok_0@) == vs, None => __r is Err },
  decreases TY::Tup(tys(#2@)), 1int,
entry:
  lemma_items(%LEN%, TY::Tup(tys(#2@)), #1@);
  lemma_ends(#1@);
inv:
  #1@ == $src.cs()
  $int == level(TY::Tup(tys(#2@)), #1@, $i as int)
  -$i <= $int <= $i
  $bool == quoted(#1@, $i as int)
  $int == bpos(#1@, begin(TY::Tup(tys(#2@)), #1@, $i as int))
  1 <= begin(TY::Tup(tys(#2@)), #1@, $i as int)
  $i > 0 ==> begin(TY::Tup(tys(#2@)), #1@, $i as int) <= $i
  scan(%LEN%, TY::Tup(tys(#2@)), #1@, $i as int) == Some(tvs($vec@))
  $iter.all() == #2@
  $iter.pos() == $vec@.len()
  $iter.pos() <= #2@.len()
step:
  lemma_tok_char(%LEN%, TY::Tup(tys(#2@)), #1@, $i as int);

[fn %TOK%::tokenize_uint]
spec:
  ensures match uint_of(%LEN%, #1@) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },
entry:
  reveal(uint_of);

[fn %TOK%::tokenize_int]
spec:
  ensures match int_of(%LEN%, #1@) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },
entry:
  reveal(int_of); reveal(uint_of);

[fn %TOK%::tokenize_fixed_array]
spec:
  ensures match titems(%LEN%, TY::Arr(Box::new(ty(*#2))), #1@) { Some(vs) => if vs.len() == #3 { __r is Ok && tvs(__r->Ok_0@) == vs } else { __r is Err }, None => __r is Err },
  decreases ty(*#2), 4int,

[fn %TOK%::tokenize_address]
spec:
  ensures match unhex_n(#1@, 20) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },

[fn %TOK%::tokenize_string]
spec:
  ensures __r is Ok && __r->Ok_0@ == #1@,

[fn %TOK%::tokenize_bool]
spec:
  ensures match bool_of(#1@) { Some(b) => __r is Ok && __r->Ok_0 == b, None => __r is Err },
entry:
  reveal(bool_of);
  reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("true"); reveal_strlit("false");

[fn %TOK%::tokenize_bytes]
spec:
  ensures match unhex(#1@) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },

[fn %TOK%::tokenize_fixed_bytes]
spec:
  ensures match unhex_n(#1@, #2 as nat) { Some(b) => __r is Ok && __r->Ok_0@ == b, None => __r is Err },
