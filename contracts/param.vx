[type ParamType]
[type Param]
[type EventParam]
[type TupleParam]
[type SerializeableParamVec]
[type SerializeableParam]
[verbatim]
text:
  pub struct ParamVisitor;
  pub struct EventParamVisitor;
  pub struct TupleParamVisitor;
  pub struct ParamTypeVisitor;
  pub struct Reader;
  pub struct Writer;
  /*@code*/
  broadcast use {group_ty, group_bpos, group_json, group_out};

[fn inner_tuple_mut]
ghost:
  __g = *#1
  __f = *final(#1)
spec:
  ensures ptup(*old(#1)) is None ==> __r is None && *final(#1) == *old(#1),
    ptup(*old(#1)) is Some ==> __r is Some && *__r->0 == ptup(*old(#1))->0 && same(*old(#1), *final(#1)) && ptup(*final(#1)) == Some(*final(__r->0)),
inv:
  {$other: &mut ParamType} ptup(*$other) == ptup(__g)
  {$other: &mut ParamType} *$other == *final($other) ==> __g == __f
  {$other: &mut ParamType} same(*$other, *final($other)) ==> same(__g, __f) && ptup(*final($other)) == ptup(__f)

[fn inner_tuple]
spec:
  ensures match ptup(*#1) { Some(v) => __r is Some && *__r->0 == v, None => __r is None },
inv:
  {$other: &ParamType} ptup(*$other) == ptup(*#1)

[fn set_tuple_components]
generics:
where:
ret: Result<(), Error>
spec:
  ensures __r is Ok == (tup(ty(*old(#1))) is None || #2 is Some),
    tup(ty(*old(#1))) is None ==> ty(*final(#1)) == ty(*old(#1)),
    tup(ty(*old(#1))) is Some && #2 is Some ==> ty(*final(#1)) == put(ty(*old(#1)), tup(ty(*old(#1)))->0 + tys(tkinds(#2->0@))),
inv:
  $vec@ =~= ptup(*old(#1))->0@ + tkinds($src@).take($i as int)
  $other@ =~= ptup(*old(#1))->0@ + tkinds($src@).take($i as int)
  {$other: &mut Vec<ParamType>} $other@ =~= ptup(*old(#1))->0@ + tkinds($src@).take($i as int)
  $vec@ == tkinds($src@).take($i as int)

[fn ParamVisitor::visit_map]
inputs: self, map: VxMapAccess
generics:
where:
ret: Result<Param, Error>
spec:
  requires #1.wf(), #1.pos() == 0, !#1.half(),
  ensures __r is Ok == reads_param(#1.ks(), #1.vs()), __r is Ok ==> is_param(__r->Ok_0, #1.ks(), #1.vs()),
entry:
  lemma_field_names();
  lemma_fields(#1.ks(), 0);
inv:
  {$other1: VxMapAccess} $other1.ks() == #1.ks() && $other1.vs() == #1.vs() && $other1.wf() && !$other1.half()
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "name"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "name"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "type"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "type"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "internalType"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "internalType"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "components"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "components"@)
ens:
  {$other1: VxMapAccess} $other1.pos() == #1.ks().len()
step:
  {$other1: VxMapAccess} lemma_fields(#1.ks(), $other1.pos() as int);

[fn EventParamVisitor::visit_map]
inputs: self, map: VxMapAccess
generics:
where:
ret: Result<EventParam, Error>
spec:
  requires #1.wf(), #1.pos() == 0, !#1.half(),
  ensures __r is Ok == reads_eparam(#1.ks(), #1.vs()), __r is Ok ==> is_eparam(__r->Ok_0, #1.ks(), #1.vs()),
entry:
  lemma_field_names();
  lemma_fields(#1.ks(), 0);
inv:
  {$other1: VxMapAccess} $other1.ks() == #1.ks() && $other1.vs() == #1.vs() && $other1.wf() && !$other1.half()
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "name"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "name"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "type"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "type"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "indexed"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "indexed"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "components"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "components"@)
ens:
  {$other1: VxMapAccess} $other1.pos() == #1.ks().len()
step:
  {$other1: VxMapAccess} lemma_fields(#1.ks(), $other1.pos() as int);

[fn TupleParamVisitor::visit_map]
inputs: self, map: VxMapAccess
generics:
where:
ret: Result<TupleParam, Error>
spec:
  requires #1.wf(), #1.pos() == 0, !#1.half(),
  ensures __r is Ok == reads_tparam(#1.ks(), #1.vs()), __r is Ok ==> is_tparam(__r->Ok_0, #1.ks(), #1.vs()),
entry:
  lemma_field_names();
  lemma_fields(#1.ks(), 0);
inv:
  {$other1: VxMapAccess} $other1.ks() == #1.ks() && $other1.vs() == #1.vs() && $other1.wf() && !$other1.half()
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "name"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "name"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "type"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "type"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "internalType"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "internalType"@)
  {$other1: VxMapAccess} once(#1.ks().take($other1.pos() as int), "components"@)
  {$other1: VxMapAccess} stored($opt, #1.ks(), #1.vs(), $other1.pos() as int, "components"@)
ens:
  {$other1: VxMapAccess} $other1.pos() == #1.ks().len()
step:
  {$other1: VxMapAccess} lemma_fields(#1.ks(), $other1.pos() as int);

[fn ParamTypeVisitor::visit_str]
generics:
where:
ret: Result<ParamType, Error>
spec:
  ensures match rd(#1@) { Some(t) => __r is Ok && ty(__r->Ok_0) == t, None => __r is Err },

[fn ParamTypeVisitor::visit_string]
generics:
where:
ret: Result<ParamType, Error>
spec:
  ensures match rd(#1@) { Some(t) => __r is Ok && ty(__r->Ok_0) == t, None => __r is Err },

[fn Param::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, match __r->Ok_0.j() { J::Obj(ks, vs) => reads_param(ks, vs) && is_param(*self, ks, vs), _ => false },
entry:
  lemma_field_names();
  lemma_kind(self.kind);

[fn EventParam::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, match __r->Ok_0.j() { J::Obj(ks, vs) => reads_eparam(ks, vs) && is_eparam(*self, ks, vs), _ => false },
entry:
  lemma_field_names();
  lemma_kind(self.kind);

[fn TupleParam::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, match __r->Ok_0.j() { J::Obj(ks, vs) => reads_tparam(ks, vs) && is_tparam(*self, ks, vs), _ => false },
entry:
  lemma_field_names();
  lemma_kind(self.kind);

[fn SerializeableParam::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, self.writes(__r->Ok_0.j()),
entry:
  lemma_field_names();
  lemma_kind(*self.0);

[fn SerializeableParamVec::serialize]
inputs: &self, serializer: VxSer
generics:
where:
ret: Result<VxOut, Error>
spec:
  ensures __r is Ok, self.writes(__r->Ok_0.j()),
entry:
  lemma_field_names();
inv:
  {$other1: VxSerSeq} wrote($other1.js(), self.0@, $i as int)
post:
  {$other1: VxSerSeq} lemma_tlist($other1.js(), tys(self.0@));

