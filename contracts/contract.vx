[type ParamType]
[type Param]
[type EventParam]
[type StateMutability]
[type Function]
[type Event]
[type Constructor]
[type Operation]
[type Contract]
[type Functions]
[type Events]
[tagged Operation]
[verbatim]
text:
  pub struct ContractVisitor;
  /*@code*/
  broadcast use {group_bpos, lemma_out_push};

[fn ContractVisitor::visit_seq]
inputs: self, seq: VxSeqAccess
generics:
where:
ret: Result<Contract, Error>
spec:
  requires #1.pos() == 0,
  ensures __r is Ok == readable(#1.all(), #1.all().len() as int), __r is Ok ==> has_all(__r->Ok_0, #1.all(), #1.all().len() as int),
entry:
  lemma_ops_0(#1.all());
inv:
  {$other1: VxSeqAccess} $other1.all() == #1.all() && $other1.pos() <= #1.all().len()
  {$other1: VxSeqAccess} readable(#1.all(), $other1.pos() as int)
  {$other1: VxSeqAccess, $other2: Contract} $other2.constructor == last_ctor(#1.all(), $other1.pos() as int)
  {$other1: VxSeqAccess, $other2: Contract} $other2.fallback == some_fallback(#1.all(), $other1.pos() as int)
  {$other1: VxSeqAccess, $other2: Contract} $other2.receive == some_receive(#1.all(), $other1.pos() as int)
  {$other1: VxSeqAccess, $other2: Contract} has_fns($other2.functions, #1.all(), $other1.pos() as int)
  {$other1: VxSeqAccess, $other2: Contract} has_evs($other2.events, #1.all(), $other1.pos() as int)
ens:
  {$other1: VxSeqAccess} $other1.pos() == #1.all().len()
step:
  {$other1: VxSeqAccess} lemma_ops_step(#1.all(), $other1.pos() as int); lemma_unreadable(#1.all(), $other1.pos() as int, #1.all().len() as int);

[fn Contract::function]
spec:
  ensures match __r { Ok(f) => named(self.functions.m(), #1@).len() > 0 && *f == named(self.functions.m(), #1@)[0], Err(e) => named(self.functions.m(), #1@).len() == 0 && e is InvalidName && e->InvalidName_0@ == #1@ },
inv:
  {$src: &Vec<Function>} first_ok($opt, head_of($src@, $i as int))
  {$src: =VxRefs<Function>} first_ok($opt, $src@.take($i as int))

[fn Contract::event]
spec:
  ensures match __r { Ok(f) => named(self.events.m(), #1@).len() > 0 && *f == named(self.events.m(), #1@)[0], Err(e) => named(self.events.m(), #1@).len() == 0 && e is InvalidName && e->InvalidName_0@ == #1@ },
inv:
  {$src: &Vec<Event>} first_ok($opt, head_of($src@, $i as int))
  {$src: =VxRefs<Event>} first_ok($opt, $src@.take($i as int))

[fn Contract::functions_by_name]
spec:
  ensures match __r { Ok(v) => self.functions.m().dom().contains(#1@) && *v == self.functions.m()[#1@], Err(e) => !self.functions.m().dom().contains(#1@) && e is InvalidName && e->InvalidName_0@ == #1@ },

[fn Contract::events_by_name]
spec:
  ensures match __r { Ok(v) => self.events.m().dom().contains(#1@) && *v == self.events.m()[#1@], Err(e) => !self.events.m().dom().contains(#1@) && e is InvalidName && e->InvalidName_0@ == #1@ },

[fn Contract::constructor]
spec:
  ensures __r is Some == self.constructor is Some, __r is Some ==> *__r->0 == self.constructor->0,

[fn Contract::functions]
spec:
  ensures all_of(self.functions.m(), __r.0.all()), __r.0.pos() == 0,

[fn Contract::events]
spec:
  ensures all_of(self.events.m(), __r.0.all()), __r.0.pos() == 0,

[fn Functions::next]
ret: Option<&'a Function>
spec:
  ensures final(self).0.all() == old(self).0.all(),
    old(self).0.pos() < old(self).0.all().len() ==> __r is Some && *__r->0 == old(self).0.all()[old(self).0.pos() as int] && final(self).0.pos() == old(self).0.pos() + 1,
    old(self).0.pos() >= old(self).0.all().len() ==> __r is None,

[fn Events::next]
ret: Option<&'a Event>
spec:
  ensures final(self).0.all() == old(self).0.all(),
    old(self).0.pos() < old(self).0.all().len() ==> __r is Some && *__r->0 == old(self).0.all()[old(self).0.pos() as int] && final(self).0.pos() == old(self).0.pos() + 1,
    old(self).0.pos() >= old(self).0.all().len() ==> __r is None,

[fn deserialize]
file: ethabi/src/util.rs
inputs: deserializer: VxData
generics:
where:
ret: Result<String, Error>
spec:
  ensures __r is Ok == de::<String>(#1) is Some, __r is Ok ==> cut(de::<String>(#1)->0@, __r->Ok_0@),

[fn Contract::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  requires keyed(*self),
  ensures __r is Ok, written(*self, __r->Ok_0.data()),
entry:
  lemma_out_0();
inv:
  {$other: VxSerSeq} o_ctor($other.data()) == o_ctor(#e($other).data())
  {$other: VxSerSeq} o_fb($other.data()) == o_fb(#e($other).data())
  {$other: VxSerSeq} o_rc($other.data()) == o_rc(#e($other).data())
  {$other: VxSerSeq} o_fns($other.data()) == o_fns(#e($other).data())
  {$other: VxSerSeq} o_evs($other.data()) == o_evs(#e($other).data())
  {$other: VxSerSeq} o_ok($other.data())
  {$other: VxSerSeq, $src: Values} o_fns($other.data()) =~= o_fns(#e($other).data()) + flat_lists($src.m(), $src.ks(), $i as int)
  {$other: VxSerSeq, $src: Values} o_evs($other.data()) =~= o_evs(#e($other).data()) + flat_lists($src.m(), $src.ks(), $i as int)
  {$other: VxSerSeq, $src: Function} o_fns($other.data()) =~= o_fns(#e($other).data()) + $src@.take($i as int)
  {$other: VxSerSeq, $src: Event} o_evs($other.data()) =~= o_evs(#e($other).data()) + $src@.take($i as int)
step:
  {$src: Values} lemma_flat_step($src.m(), $src.ks(), $i as int);
pre:
  {$src: Values} lemma_flat_step($src.m(), $src.ks(), 0);
post:
  {$other: VxSerSeq, $src: Values} lemma_fall($src.m(), $src.ks(), o_fns($other.data()));
  {$other: VxSerSeq, $src: Values} lemma_eall($src.m(), $src.ks(), o_evs($other.data()));
