[type Token]
[type Mediate]
[verbatim]
text:
  /*@code*/
  broadcast use {group_tv, group_dyn, group_enc, group_lay, group_flat, group_word, group_m, group_fits};

[fn pad_u32]
spec:
  ensures __r@ == word(#1 as nat),

[fn pad_fixed_bytes]
spec:
  requires #1@.len() < 0x1_0000_0000,
  ensures flat(__r@) == zpad(#1@),
inv:
  flat($vec@) == zpad(#1@).take(32 * $i)
  flat($vec@) == zpad(#1@).take(32 * ($vec@.len() as int))
  32 * $vec@.len() < #1@.len() + 32
  $int == if 32 * $vec@.len() <= #1@.len() { 32 * ($vec@.len() as int) } else { #1@.len() as int }
  $n == (#1@.len() + 31) / 32
step:
  lemma_zpad_step(#1@, $i as int);
  lemma_zpad_step(#1@, $vec@.len() as int);
post:
  lemma_zpad_full(#1@, $vec@.len() as int);

[fn pad_bytes]
spec:
  requires #1@.len() < 0x1_0000_0000,
  ensures flat(__r@) == word(#1@.len()) + zpad(#1@),

[fn Mediate::head_len]
spec:
  requires mok(*self),
  ensures __r == hsize(Item { dy: mdyn(*self), body: mbody(*self) }),
  decreases self,
inv:
  $int == heads_size(mitems($src@), $i as int)

[fn Mediate::tail_len]
spec:
  requires mok(*self),
  ensures __r == if mdyn(*self) { mbody(*self).len() } else { 0 },
  decreases self,
inv:
  $int == heads_size(mitems($src@), $i as int) + tails(mitems($src@), $i as int).len()
  $int == 32 + heads_size(mitems($src@), $i as int) + tails(mitems($src@), $i as int).len()

[fn Mediate::head]
spec:
  requires mok(*self),
  ensures flat(__r@) == if mdyn(*self) { word(#1 as nat) } else { mbody(*self) },
  decreases self,
inv:
  flat($vec@) == heads(mitems($src@), 0, $i as int)

[fn Mediate::tail]
spec:
  requires mok(*self),
  ensures flat(__r@) == if mdyn(*self) { mbody(*self) } else { Seq::empty() },
  decreases self, 0int,

[fn encode_head_tail]
spec:
  requires msok(#1@), lay(mitems(#1@)).len() < 0x1_0000_0000,
  ensures flat(__r@) == lay(mitems(#1@)),
  decreases #1@, 1int,
inv:
  $int == heads_size(mitems($src@), $i as int)
  $int == heads_size(mitems($src@), $n as int) + tails(mitems($src@), $i as int).len()
  flat($vec@) == heads(mitems($src@), heads_size(mitems($src@), $n as int), $i as int)
  flat($vec@) == tails(mitems($src@), $i as int)
  flat($vec@) == heads(mitems($src@), heads_size(mitems($src@), $n as int), $n as int) + tails(mitems($src@), $i as int)

[fn encode]
spec:
  requires list_fits(tvs(#1@)),
  ensures __r@ == enc_list(tvs(#1@)),
inv:
  {$vec: Vec<Mediate>} $vec@.len() == $i
  {$vec: Vec<Mediate>} forall|k: int| 0 <= k < $i ==> mof(#[trigger] $vec@[k], tv(#1@[k]))
  {$vec: Vec<u8>} $vec@ == flat_to($src@, $i as int)

[fn encode_token]
spec:
  requires fits(tv(*#1)),
  ensures mof(__r, tv(*#1)),
  decreases #1,
inv:
  {$vec: Vec<Mediate>} $vec@.len() == $i
  {$vec: Vec<Mediate>} forall|k: int| 0 <= k < $i ==> mof(#[trigger] $vec@[k], tv($src@[k]))

[fn Token::is_dynamic]
spec:
  ensures __r == dynv(tv(*self)),
  decreases self,
inv:
  $bool == exists|k: int| 0 <= k < $i && dynv(tv(#[trigger] $src@[k]))
entry:
  lemma_dynv_ex(tv(*self));
