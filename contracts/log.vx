[type Token]
[type ParamType]
[type Param]
[type EventParam]
[type Event]
[type RawLog]
[type LogParam]
[type Log]
[verbatim]
text:
  /*@code*/
  broadcast use {group_sig, group_log, lemma_tvs_len, lemma_tvs_index2};

[fn Event::parse_log]
spec:
  requires #1.data@.len() <= isize::MAX, 32 * #1.topics@.len() <= isize::MAX,
  ensures topics_valid(self.inputs@) ==> match log_of(*self, hbytes(#1.topics@), #1.data@) { Some(vs) => __r is Ok && lnames(__r->Ok_0.params@) == enames(self.inputs@) && lvals(__r->Ok_0.params@) == vs, None => __r is Err },
entry:
  lemma_log(*self, #1.topics@, #1.data@);
inv:
  {$vec: Vec<EventParam>} $vec@ == sel($src@, true, $i as int)
  {$vec: Vec<EventParam>} $vec@ == sel($src@, false, $i as int)
  {$vec: Vec<ParamType>} $vec@ == ekinds($src@).take($i as int)
  {$vec: Vec<ParamType>} $vec@ == ekinds(sel($src@, false, $i as int))
  {$vec: Vec<ParamType>} $vec@ == ttypes(sel($src@, true, $i as int))
  {$vec: Vec<ParamType>} $vec@ == ttypes($src@).take($i as int)
  {$vec: Vec<u8>} $vec@ == hflat(#1.topics@, if self.anonymous { 0 } else { 1 }, $i as int)
  {$vec: Vec<u8>} $vec@ == hflat(#1.topics@, if self.anonymous { 0 } else { 1 }, $i + if self.anonymous { 0int } else { 1int })
  (if self.anonymous { 0int } else { 1int }) <= $i
  {$vec: Vec<LogParam>} lnames($vec@) == enames(self.inputs@).take($i as int)
  {$vec: Vec<LogParam>} lvals($vec@) == log_vals(self.inputs@, dec_list(ttypes(all_sel(self.inputs@, true)), hflat(#1.topics@, if self.anonymous { 0 } else { 1 }, #1.topics@.len() as int))->0, dec_list(ekinds(all_sel(self.inputs@, false)), #1.data@)->0).take($i as int)
  {$iter: VxIterO<Token>} tvs($iter.all()) == dec_list(ttypes(all_sel(self.inputs@, true)), hflat(#1.topics@, if self.anonymous { 0 } else { 1 }, #1.topics@.len() as int))->0
  {$iter: VxIterO<Token>} tvs($iter.all()) == dec_list(ekinds(all_sel(self.inputs@, false)), #1.data@)->0
  {$iter: VxIterO<Token>} $iter.pos() == sel(self.inputs@, true, $i as int).len()
  {$iter: VxIterO<Token>} $iter.pos() == sel(self.inputs@, false, $i as int).len()
  {$iter: VxIter<Token>} tvs($iter.all()) == dec_list(ttypes(all_sel(self.inputs@, true)), hflat(#1.topics@, if self.anonymous { 0 } else { 1 }, #1.topics@.len() as int))->0
  {$iter: VxIter<Token>} tvs($iter.all()) == dec_list(ekinds(all_sel(self.inputs@, false)), #1.data@)->0
  {$iter: VxIter<Token>} $iter.pos() == sel(self.inputs@, true, $i as int).len()
  {$iter: VxIter<Token>} $iter.pos() == sel(self.inputs@, false, $i as int).len()
step:
  lemma_sel_step(self.inputs@, $i as int);
  lemma_hflat_step(#1.topics@, if self.anonymous { 0 } else { 1 }, $i as int);
  lemma_hflat_step(#1.topics@, if self.anonymous { 0 } else { 1 }, $i + if self.anonymous { 0int } else { 1int });
