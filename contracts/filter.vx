[type Token]
[type ParamType]
[type Param]
[type EventParam]
[type Event]
[type Topic]
[type RawTopicFilter]
[type TopicFilter]
[verbatim]
text:
  /*@code*/
  broadcast use {group_tv, group_sig, group_filter};

[fn encode_in_place]
spec:
  requires leaves_fit(tv(*#1)),
  ensures __r@ == in_place(tv(*#1)),
  decreases #1,
entry:
  lemma_in_place(*#1);
inv:
  {$vec: Vec<u8>} $vec@ == in_places(tvs($src@), $i as int)
  {$vec: Vec<u8>} rpad($vec@) == in_place(tv(*#1))
dec:
  {$vec: Vec<u8>} rpad($vec@).len() - $vec@.len()
step:
  lemma_in_places_step(tvs($src@), $i as int);

[fn convert_token]
spec:
  requires leaves_fit(tv(#1)),
  ensures
    !oftype(tv(#1), *#2) ==> __r is Err,
    oftype(tv(#1), *#2) ==> __r is Ok && topic_is(tv(#1), __r->Ok_0.b@),
entry:
  lemma_topic_of(#1);
  reveal(topic_is);

[fn convert_topic]
spec:
  requires topic_fits(#1),
  ensures
    !conv_ok(#1, #2) ==> __r is Err,
    conv_ok(#1, #2) ==> __r is Ok && conv_is(#1, __r->Ok_0),
inv:
  {$vec: Vec<H256>} topics_are($src@, $vec@, $i as int)
  forall|k: int| 0 <= k < $i ==> oftype(tv(#[trigger] $src@[k]), *#2->0)

[fn Event::filter]
spec:
  requires topic_fits(#1.topic0), topic_fits(#1.topic1), topic_fits(#1.topic2),
  ensures
    !filter_ok(*self, #1) ==> __r is Err,
    filter_ok(*self, #1) ==> __r is Ok && filter_is(*self, #1, __r->Ok_0),
inv:
  {$vec: Vec<EventParam>} $vec@ == sel($src@, true, $i as int)
  {$vec: Vec<ParamType>} $vec@ == ekinds($src@).take($i as int)
  {$vec: Vec<ParamType>} $vec@ == ekinds(sel($src@, true, $i as int))
step:
  lemma_sel_step(self.inputs@, $i as int);
