[dir ethabi/src]
[type Token]
[type Topic]
[type TopicFilter]
[verbatim]
text:
  pub struct Writer;
  /*@code*/
  broadcast use {group_text, group_topics};

[fn TopicFilter::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, __r->Ok_0.j() == filter_json(*self),

[fn <Topic<Hash> as Serialize>::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, __r->Ok_0.j() == topic_json(*self),
inv:
  {$vec: Vec<Value>} $vec@.len() == $i && forall|k: int| 0 <= k < $i ==> vj(#[trigger] $vec@[k]) == J::Text(hash_text($src@[k]))
  {$vec: Vec<String>} $vec@.len() == $i && forall|k: int| 0 <= k < $i ==> (#[trigger] $vec@[k])@ == hash_text($src@[k])
  {$other: VxSerSeq} $other.js().len() == $i && forall|k: int| 0 <= k < $i ==> #[trigger] $other.js()[k] == J::Text(hash_text($src@[k]))

[fn Topic::is_any]
spec:
  ensures __r == (*self is Any),

[fn Topic::map]
spec:
  requires forall|x: T| #[trigger] #1.requires((x,)),
  ensures match self {
    Topic::Any => __r is Any,
    Topic::This(x) => __r is This && #1.ensures((x,), __r->This_0),
    Topic::OneOf(xs) => __r is OneOf && __r->OneOf_0@.len() == xs@.len() && forall|i: int| 0 <= i < xs@.len() ==> #1.ensures((xs@[i],), #[trigger] __r->OneOf_0@[i]),
  },
inv:
  {$vec: Vec<O>} $vec@.len() == $i && forall|k: int| 0 <= k < $i ==> #1.ensures(($src@[k],), #[trigger] $vec@[k])

[fn Topic::default]
spec:
  ensures __r is Any,

[fn <Topic<T> as From<Option<T>>>::from]
name: topic_from_option
generics: <T>
ret: Topic<T>
spec:
  ensures match #1 { Some(x) => __r == Topic::This(x), None => __r is Any },

[fn <Topic<T> as From<T>>::from]
name: topic_from_value
generics: <T>
ret: Topic<T>
spec:
  ensures __r == Topic::This(#1),

[fn <Topic<T> as From<Vec<T>>>::from]
name: topic_from_list
generics: <T>
ret: Topic<T>
spec:
  ensures __r == Topic::OneOf(#1),

[fn <Vec<T> as From<Topic<T>>>::from]
name: list_from_topic
generics: <T>
ret: Vec<T>
spec:
  ensures match #1 { Topic::Any => __r@ == Seq::<T>::empty(), Topic::This(x) => __r@ == seq![x], Topic::OneOf(xs) => __r@ == xs@ },

[fn Topic::index]
ret: &T
spec:
  requires match *self { Topic::Any => false, Topic::This(_) => #1 == 0, Topic::OneOf(ts) => #1 < ts@.len() },
  ensures *__r == (match *self { Topic::This(x) => x, Topic::OneOf(ts) => ts@[#1 as int], _ => *__r }),
