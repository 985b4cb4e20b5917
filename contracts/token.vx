[type Token]
[type ParamType]
[verbatim]
text:
  /*@code*/
  broadcast use {group_tv, group_dyn, lemma_pteq};

[fn Token::type_check]
spec:
  ensures __r == oftype(tv(*self), *#1),
  decreases self, 0int,
entry:
  lemma_oftype(tv(*self), *#1);
inv:
  $bool == forall|k: int| 0 <= k < $i ==> oftype(tv(#[trigger] $src@[k]), @@type_check.0.pt())
  forall|k: int| 0 <= k < $i ==> oftype(tv(#[trigger] $src@[k]), @@type_check.0.pt())
  $bool == exists|k: int| 0 <= k < $i && !oftype(tv(#[trigger] $src@[k]), @@type_check.0.pt())

[fn Token::types_check]
spec:
  ensures __r == oftypes(tvs(#1@), #2@),
  decreases #1@, 1int,
inv:
  $bool == forall|k: int| 0 <= k < $i ==> oftype(tv(#[trigger] #1@[k]), #2@[k])
  forall|k: int| 0 <= k < $i ==> oftype(tv(#[trigger] #1@[k]), #2@[k])
  $bool == exists|k: int| 0 <= k < $i && !oftype(tv(#[trigger] #1@[k]), #2@[k])

[fn Token::into_address]
spec:
  ensures __r == (match self { Token::Address(x) => Some(x), _ => None }),
[fn Token::into_fixed_bytes]
spec:
  ensures __r == (match self { Token::FixedBytes(x) => Some(x), _ => None }),
[fn Token::into_bytes]
spec:
  ensures __r == (match self { Token::Bytes(x) => Some(x), _ => None }),
[fn Token::into_int]
spec:
  ensures __r == (match self { Token::Int(x) => Some(x), _ => None }),
[fn Token::into_uint]
spec:
  ensures __r == (match self { Token::Uint(x) => Some(x), _ => None }),
[fn Token::into_bool]
spec:
  ensures __r == (match self { Token::Bool(x) => Some(x), _ => None }),
[fn Token::into_string]
spec:
  ensures __r == (match self { Token::String(x) => Some(x), _ => None }),
[fn Token::into_fixed_array]
spec:
  ensures __r == (match self { Token::FixedArray(x) => Some(x), _ => None }),
[fn Token::into_array]
spec:
  ensures __r == (match self { Token::Array(x) => Some(x), _ => None }),

[fn Token::is_dynamic]
spec:
  ensures __r == dynv(tv(*self)),
  decreases self,
inv:
  $bool == exists|k: int| 0 <= k < $i && dynv(tv(#[trigger] $src@[k]))
  forall|k: int| 0 <= k < $i ==> !dynv(tv(#[trigger] $src@[k]))
entry:
  lemma_dynv_ex(tv(*self));

[fn ParamType::is_dynamic]
spec:
  ensures __r == dynt(*self),
  decreases self,
entry:
  lemma_dynt_ex(*self);
inv:
  $bool == exists|k: int| 0 <= k < $i && dynt(#[trigger] $src@[k])
  forall|k: int| 0 <= k < $i ==> !dynt(#[trigger] $src@[k])
