[type Token]
[type ParamType]
[type DecodeResult]
[verbatim]
text:
  /*@code*/
  broadcast use {lemma_tcap};

[fn as_usize]
spec:
  ensures __r is Ok ==> __r->Ok_0 < 0x1_0000_0000,
entry:
  lemma_shift_bounds();
inv:
  $int == be_part(#1@, 28, $i as int)
step:
  lemma_be_part(#1@, 28, $i as int);

[fn as_bool]

[fn decode]
spec:
  requires #2@.len() <= isize::MAX, #2@.len() <= cap_bound(), #1@.len() <= cap_bound(), forall|i: int| 0 <= i < #1@.len() ==> tcap(#[trigger] #1@[i]),
inv:
  $int <= #2@.len() + 32

[fn peek]
spec:
  requires #1@.len() <= isize::MAX, #2 + #3 <= usize::MAX,
  ensures __r is Ok ==> #2 + #3 <= #1@.len() && __r->Ok_0@.len() == #3,

[fn peek_32_bytes]
spec:
  requires #1@.len() <= isize::MAX, #2 + 32 <= usize::MAX,
  ensures __r is Ok ==> #2 + 32 <= #1@.len(),

[fn take_bytes]
spec:
  requires #1@.len() <= isize::MAX,
  ensures __r is Ok ==> #2 + #3 <= #1@.len() && __r->Ok_0@.len() == #3,

[fn decode_param]
spec:
  requires #2@.len() <= isize::MAX, #3 <= #2@.len() + 32, #2@.len() <= cap_bound(), tcap(*#1),
  ensures __r is Ok ==> __r->Ok_0.new_offset <= #2@.len() + 32,
  decreases #1,
inv:
  $int <= @@decode_param.1@.len() + 32

[fn ParamType::is_empty_bytes_valid_encoding]
[fn ParamType::is_dynamic]
spec:
  decreases self,
